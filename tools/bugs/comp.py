S = "crates/mabo-compiler/src/simplify.rs"
L = "crates/mabo-compiler/src/lib.rs"
V = "crates/mabo-compiler/src/validate/"
PRE = '''use mabo_parser::Schema;
fn parse(s: &str) -> Schema<'_> { Schema::parse(s, None).unwrap() }
#[allow(dead_code)]
fn valid(s: &str) -> bool { mabo_compiler::validate_schema(&parse(s)).is_ok() }
'''
FIELDS = '''fn ids(src: &str) -> Vec<u32> {
    let p = parse(src);
    let s = mabo_compiler::simplify_schema(&p);
    match &s.definitions[0] {
        mabo_compiler::simplify::Definition::Struct(s) => s.fields.fields.iter().map(|f| f.id).collect(),
        mabo_compiler::simplify::Definition::Enum(e) => e.variants.iter().map(|v| v.id).collect(),
        _ => unreachable!(),
    }
}
'''
BUGS = [
 dict(id="external-path-tail", property="M13", needs="a type referenced through more than one module",
  breaks="the simplified reference keeps only the innermost module of the path",
  edits=[(S, "path: ty.path.iter().map(|(segment, _)| segment.get()).collect(),", "path: ty\n                .path\n                .last()\n                .into_iter()\n                .map(|(segment, _)| segment.get())\n                .collect(),")],
  files={"main.rs": PRE + '''fn main() {
    let p = parse("mod a { mod b { struct C } } struct A { a: a::b::C @1 }");
    let s = mabo_compiler::simplify_schema(&p);
    let mabo_compiler::simplify::Definition::Struct(s) = &s.definitions[1] else { unreachable!() };
    let mabo_compiler::simplify::Type::External(t) = &s.fields.fields[0].ty else { unreachable!() };
    assert_eq!(&t.path[..], ["a", "b"]);
}
'''}),
 dict(id="generic-map-key", property="M15", needs="a type parameter that is used only as the key of a map",
  breaks="the keys of maps are not searched for type parameters, so a valid schema is rejected",
  edits=[(V + "generics.rs", '''            visit_externals(key, visit);
            visit_externals(value, visit);''', '''            if matches!(key.value, DataType::Tuple { .. }) {
                visit_externals(key, visit);
            }
            visit_externals(value, visit);''')],
  files={"main.rs": PRE + '''fn main() {
    assert!(valid("struct A<T> { a: hash_map<u8, T> @1 }"));
    assert!(valid("struct A<K, V> { a: hash_map<K, V> @1 }"));
}
'''}),
 dict(id="import-first-segment", property="M14", needs="two imports of the same name from different schemas, or one that equals a definition's name",
  breaks="imports without an element claim the name of the schema instead of the module they bring into scope",
  edits=[(V + "names.rs", "Definition::Import(Import { segments, .. }) => segments.last()?,", "Definition::Import(Import { segments, .. }) => segments.first()?,")],
  files={"main.rs": PRE + '''fn main() {
    assert!(!valid("use other::one; mod one { }"));
    assert!(valid("use other::one; use other::two;"));
}
'''}),
 dict(id="variant-field-ids-explicit", property="M14", needs="a variant with an omitted variant id and two fields of the same id",
  breaks="the fields of variants without an explicit id are not checked for duplicate ids",
  edits=[(V + "ids.rs", '''                .or_else(|| {
                    validate_field_ids(&variant.fields)''', '''                .or_else(|| {
                    variant.id.as_ref()?;
                    validate_field_ids(&variant.fields)''')],
  files={"main.rs": PRE + '''fn main() {
    assert!(!valid("enum A { A { a: u8 @1, b: u8 @1 } @1 }"));
    assert!(!valid("enum A { A { a: u8 @1, b: u8 @1 } }"));
}
'''}),
 dict(id="tuple-map-value", property="M15", needs="a map with a composite key and a one-element tuple in its value type",
  breaks="the value type of a map is looked at only when the key is not itself a composite type",
  edits=[(V + "tuples.rs", '''            visit_tuples(key, visit)?;
            visit_tuples(value, visit)''', '''            visit_tuples(key, visit)?;
            if matches!(key.value, DataType::Tuple { .. }) {
                return Ok(());
            }
            visit_tuples(value, visit)''')],
  files={"main.rs": PRE + '''fn main() {
    assert!(!valid("struct A { a: hash_map<u8, (u8)> @1 }"));
    assert!(!valid("struct A { a: hash_map<(u8, u8), (u8)> @1 }"));
    assert!(valid("struct A { a: hash_map<(u8, u8), (u8, u8)> @1 }"));
}
'''}),
 dict(id="tuple-nested-large", property="M15", needs="a bad tuple inside a tuple of twelve elements",
  breaks="the largest tuples end the walk, so that tuples inside of them are not checked",
  edits=[(V + "tuples.rs", '''            visit(types.values())?;
            types.values().try_for_each(|ty| visit_tuples(ty, visit))''', '''            visit(types.values())?;
            types
                .values()
                .take(11)
                .try_for_each(|ty| visit_tuples(ty, visit))''')],
  files={"main.rs": PRE + '''fn main() {
    assert!(!valid("struct A { a: (u8, (u8)) @1 }"));
    assert!(!valid("struct A { a: (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, (u8)) @1 }"));
}
'''}),
 dict(id="literal-int-saturate", property="M13", needs="an integer constant beyond the range of 64-bit integers",
  breaks="integer constants above i64::MAX are replaced by i64::MAX in the simplified schema",
  edits=[(S, "mabo_parser::LiteralValue::Int(i) => Literal::Int(i),", "mabo_parser::LiteralValue::Int(i) => {\n            Literal::Int(i64::try_from(i).map_or_else(|_| i.min(i64::MAX.into()), i128::from))\n        }")],
  files={"main.rs": PRE + '''fn lit(src: &str) -> i128 {
    let p = parse(src);
    let s = mabo_compiler::simplify_schema(&p);
    let mabo_compiler::simplify::Definition::Const(c) = &s.definitions[0] else { unreachable!() };
    let mabo_compiler::simplify::Literal::Int(i) = c.value else { unreachable!() };
    i
}
fn main() {
    assert_eq!(lit("const A: i64 = -5;"), -5);
    assert_eq!(lit("const A: u64 = 18446744073709551615;"), u64::MAX.into());
}
'''}),
 dict(id="variant-generator-shared", property="M13", needs="an enum with a variant that has fields, followed by a variant without an explicit id",
  breaks="the generated id of a later tuple variant's fields continues the numbering of earlier variants",
  edits=[(S, """            variants: item""", """            variants: item""")],
  files={"main.rs": "fn main() {}"}) if False else None,
]
BUGS = [b for b in BUGS if b]
