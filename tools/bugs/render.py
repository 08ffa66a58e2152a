E = "crates/mabo-compiler/src/resolve/error.rs"
V = "crates/mabo-compiler/src/validate/"
P = "crates/mabo-parser/src/"
PRE = '''#![allow(dead_code)]
use mabo_parser::Schema;
use miette::Diagnostic as D;
/// message, help, codes and labels of an error and those it is related to
fn show(d: &dyn D, out: &mut Vec<String>) {
    out.push(format!("message {d}"));
    if let Some(h) = d.help() { out.push(format!("help {h}")); }
    for l in d.labels().into_iter().flatten() {
        out.push(format!("label {}..{} {}", l.offset(), l.offset() + l.len(), l.label().unwrap_or("")));
    }
    for r in d.related().into_iter().flatten() { show(r, out); }
}
fn shown(d: &dyn D) -> Vec<String> {
    let mut v = Vec::new();
    show(d, &mut v);
    println!("{v:#?}");
    v
}
fn parse(s: &str) -> Vec<String> { shown(&Schema::parse(s, None).unwrap_err()) }
fn validate(s: &str) -> Vec<String> { shown(&mabo_compiler::validate_schema(&Schema::parse(s, None).unwrap()).unwrap_err()) }
fn resolve(s: &str) -> Vec<String> { shown(&mabo_compiler::resolve_schemas(&[("a", &Schema::parse(s, None).unwrap())]).unwrap_err()) }
fn has(v: &[String], part: &str) { assert!(v.iter().any(|x| x.contains(part)), "no {part}"); }
'''
BUGS = [
 dict(id="render-module-labels", property="M36", needs="two definitions of the same name in one module", breaks="the labels of the first declaration and of the one that clashes with it are interchanged",
  edits=[(V + "names.rs", '''    /// Name of the declaration.
    pub name: String,
    /// Source location of the first occurrence.
    #[label("first declared here")]
    pub first: Range<usize>,
    /// Source location of the duplicate.
    #[label("used here again")]''', '''    /// Name of the declaration.
    pub name: String,
    /// Source location of the first occurrence.
    #[label("used here again")]
    pub first: Range<usize>,
    /// Source location of the duplicate.
    #[label("first declared here")]''')],
  files={"main.rs": PRE + '''fn main() {
    let v = validate("struct A(u8 @1)\\nenum A { B @1, }\\n");
    has(&v, "label 7..8 first declared here");
    has(&v, "label 21..22 used here again");
}
'''}),
 dict(id="render-missing-path", property="M36", needs="a type that doesn't exist", breaks="the message names the module as the missing type and the type as the module",
  edits=[(E, '''    "definition {} not found in module {}",
    highlight::value(name),
    highlight::value(path)''', '''    "definition {} not found in module {}",
    highlight::value(path),
    highlight::value(name)''')],
  files={"main.rs": PRE + '''fn main() {
    let v = resolve("mod inner { struct A(b: B @1) }".replace("b: ", "").as_str());
    let m = v.iter().find(|x| x.contains("not found")).unwrap();
    assert!(m.find("B").unwrap() < m.find("inner").unwrap(), "{m}");
}
'''}),
 dict(id="render-import-error", property="M36", needs="an import that can't be parsed", breaks="neither the place nor the cause of the error is shown",
  edits=[(P + "error.rs", '''    /// Invalid import definition.
    #[diagnostic(transparent)]
''', '''    /// Invalid import definition.
''')],
  files={"main.rs": PRE + '''fn main() {
    has(&parse("use Abc::def;\\n"), "label 4..4");
}
'''}),
 dict(id="render-variant-label", property="M36", needs="an enum variant with a bad name", breaks="the place of the bad character isn't labelled",
  edits=[(P + "parser/enums.rs", '''    InvalidVariantName {
        /// Source location of the character.
        #[err(label("Problematic character"))]
''', '''    InvalidVariantName {
        /// Source location of the character.
''')],
  files={"main.rs": PRE + '''fn main() {
    has(&parse("enum A {\\n    b,\\n}\\n"), "label 13..13 Problematic character");
}
'''}),
 dict(id="render-stopped-at", property="M36", needs="a path through a module that doesn't exist", breaks="the help gives the missing module instead of the one where the search ended",
  edits=[(E, 'help("the resolution stopped at module path {}", highlight::value(path))', 'help("the resolution stopped at module path {}", highlight::value(name))')],
  files={"main.rs": PRE + '''fn main() {
    let v = resolve("mod inner { struct A(gone::B @1) }");
    assert!(v.iter().any(|x| x.starts_with("help") && x.contains("inner")));
}
'''}),
 dict(id="render-long-label", property="M36", needs="a clash that involves a name longer than 24 characters", breaks="only the first place of the clash is labelled",
  edits=[(E, '''        self.cause.labels()
''', '''        self.cause
            .labels()
            .map(|labels| Box::new(labels.filter(|l| l.len() <= 24)) as Box<dyn Iterator<Item = miette::LabeledSpan>>)
''')],
  files={"main.rs": PRE + '''fn main() {
    has(&resolve("struct A(AVeryLongNameOfATypeThatDoesNotExist @1)"), "label 9..46 used here");
}
'''}),
 dict(id="render-position", property="M36", needs="a duplicate id in a tuple struct of more than 16 fields", breaks="the message gives a position that isn't the field's",
  edits=[(V + "ids.rs", 'in position {position}, already used at {other_position}", id.get())]', 'in position {}, already used at {other_position}", id.get(), (*position).min(16))]')],
  files={"main.rs": PRE + '''fn main() {
    let mut s = String::from("struct A(");
    for i in 1..=20 { s += &format!("u8 @{}, ", if i == 20 { 3 } else { i }); }
    has(&validate(&format!("{})", s.trim_end_matches(", "))), "in position 20, already used at 3");
}
'''}),
]
