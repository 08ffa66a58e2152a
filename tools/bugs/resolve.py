R = "crates/mabo-compiler/src/resolve/mod.rs"
PRE = '''use mabo_parser::Schema;
fn ok(src: &[(&str, &str)]) -> bool {
    let s: Vec<_> = src.iter().map(|(n, s)| (*n, Schema::parse(s, None).unwrap())).collect();
    let v: Vec<_> = s.iter().map(|(n, s)| (*n, s)).collect();
    mabo_compiler::resolve_schemas(&v).is_ok()
}
'''
BUGS = [
 dict(id="type-parameter-path", property="M16", needs="a generic struct that refers to a type of a module, where the type is named like a type parameter and does not exist",
  breaks="a path to a missing type passes as a type parameter when the last segment is named like one",
  edits=[(R, """            && external.path.is_empty()
""", "")],
  files={"main.rs": PRE + '''fn main() {
    assert!(ok(&[("a", "struct A<T> { a: T @1 }")]));
    assert!(!ok(&[("a", "mod other { struct B } struct A<T> { a: T @1, b: other::T @2 }")]));
}
'''}),
 dict(id="import-two-levels", property="M16", needs="an import of a module that is nested more than two levels deep",
  breaks="segments of an import after the third are ignored, so a wrong module is imported",
  edits=[(R, """                .segments
                .iter()
                .skip(1)
""", """                .segments
                .iter()
                .take(3)
                .skip(1)
""")],
  files={"main.rs": PRE + '''fn main() {
    let b = ("b", "mod c { mod d { mod e { struct E } } }");
    assert!(ok(&[("a", "use b::c::d; struct A { a: d::e::E @1 }"), b]));
    assert!(ok(&[("a", "use b::c::d::e; struct A { a: e::E @1 }"), b]));
}
'''}),
 dict(id="generics-count-less", property="M16", needs="a type used with fewer arguments than it has parameters",
  breaks="local types used with too few arguments are accepted",
  edits=[(R, """                if generics != ty.generics.as_ref().map_or(0, Punctuated::len) =>
            {
                Err(GenericsCount {""", """                if generics < ty.generics.as_ref().map_or(0, Punctuated::len) =>
            {
                Err(GenericsCount {""")],
  files={"main.rs": PRE + '''fn main() {
    assert!(!ok(&[("a", "struct G<T> { a: T @1 } struct A { a: G<u8, u8> @1 }")]));
    assert!(!ok(&[("a", "struct G<K, V> { a: K @1, b: V @2 } struct A { a: G<u8> @1 }")]));
}
'''}),
 dict(id="remote-generics-optional", property="M16", needs="an imported generic type that is used without any type arguments",
  breaks="an imported type is accepted without type arguments although it has parameters",
  edits=[(R, """            if generics == ty.external.generics.as_ref().map_or(0, Punctuated::len) {
                return Ok(());""", """            if generics == ty.external.generics.as_ref().map_or(generics, Punctuated::len) {
                return Ok(());""")],
  files={"main.rs": PRE + '''fn main() {
    let b = ("b", "struct G<T> { a: T @1 }");
    assert!(ok(&[("a", "use b::G; struct A { a: G<u8> @1 }"), b]));
    assert!(!ok(&[("a", "use b::G; struct A { a: G @1 }"), b]));
}
'''}),
 dict(id="variant-tuple-unresolved", property="M16", needs="a missing type used in a variant that comes after the first variant without fields",
  breaks="variants after a variant without fields are not resolved",
  edits=[(R, """                for variant in e.variants.values() {
                    resolve_fields(""", """                for variant in e
                    .variants
                    .values()
                    .skip_while(|variant| variant.fields == Fields::Unit)
                    .take_while(|variant| variant.fields != Fields::Unit)
                {
                    resolve_fields(""")],
  files={"main.rs": PRE + '''fn main() {
    assert!(!ok(&[("a", "enum A { A(Missing @1) @1 }")]));
    assert!(!ok(&[("a", "enum A { A(u8 @1) @1, B @2, C(Missing @1) @3 }")]));
}
'''}),
]
