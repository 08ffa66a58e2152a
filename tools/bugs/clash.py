V = "crates/mabo-compiler/src/validate/"
PRE = '''use mabo_parser::Schema;
fn problem(s: &str) -> String {
    let schema = Schema::parse(s, None).unwrap();
    format!("{:?}", mabo_compiler::validate_schema(&schema).unwrap_err())
}
/// value of one field of the error
#[allow(dead_code)]
fn field(s: &str, name: &str) -> String {
    let p = problem(s);
    let k = format!("{name}: ");
    let i = p.find(&k).unwrap_or_else(|| panic!("no {name} in {p}")) + k.len();
    p[i..].split([',', ' ', '}', '"']).find(|x| !x.is_empty()).unwrap().to_owned()
}
/// text at the place that a field of the error gives
#[allow(dead_code)]
fn at<'a>(s: &'a str, name: &str) -> (usize, &'a str) {
    let f = field(s, name);
    let (a, b) = f.split_once("..").unwrap();
    let a: usize = a.parse().unwrap();
    (a, &s[a..b.parse().unwrap()])
}
'''
BUGS = [
 dict(id="clash-import-first-segment", property="M31", needs="a module import of more than one segment that clashes with an earlier definition",
  breaks="the place of the later element is the first segment of the import instead of the name that clashes",
  edits=[(V + "names.rs", '''            visited.insert(name.get(), name.span()).map(|first| {
                DuplicateNameInModule {
                    name: name.get().to_owned(),
                    first: first.into(),
                    second: name.span().into(),''', '''            let span = match definition {
                Definition::Import(Import { segments, .. }) => segments.first()?.span(),
                _ => name.span(),
            };
            visited.insert(name.get(), span).map(|first| {
                DuplicateNameInModule {
                    name: name.get().to_owned(),
                    first: first.into(),
                    second: span.into(),''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "struct B\\nuse a::b::B;\\n";
    assert_eq!(at(s, "second"), (s.len() - 3, "B"), "{}", problem(s));
}
'''}),
 dict(id="clash-adjacent-position", property="M31", needs="unnamed fields with the same id that are not next to each other",
  breaks="the position of the earlier field is taken to be the one before",
  edits=[(V + "ids.rs", '''                    visited.insert(id.get(), (pos, id.span())).map(
                        |(other_position, other_span)| DuplicateUnnamedFieldId {
                            position: pos + 1,
                            other_position: other_position + 1,''', '''                    visited.insert(id.get(), id.span()).map(
                        |other_span| DuplicateUnnamedFieldId {
                            position: pos + 1,
                            other_position: pos,''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "struct A(u8 @1, u8 @2, u8 @1)";
    assert_eq!((field(s, "position"), field(s, "other_position")), ("3".into(), "1".into()), "{}", problem(s));
}
'''}),
 dict(id="clash-derived-place", property="M31", needs="two clashing variants of which the later one has no explicit id",
  breaks="the place of a derived id is where the explicit id of the element before is",
  edits=[(V + "ids.rs", '''    let mut visited = FxHashMap::with_capacity_and_hasher(value.variants.len(), FxBuildHasher);
    let mut id_gen = IdGenerator::new();
''', '''    let mut visited = FxHashMap::with_capacity_and_hasher(value.variants.len(), FxBuildHasher);
    let mut id_gen = IdGenerator::new();
    let mut last = None;
'''), (V + "ids.rs", '''            let id = id_gen.next_with_span(variant.id.as_ref(), || variant.span());

            visited
                .insert(id.get(), (variant.name.get(), id.span()))''', '''            let id = id_gen.next_with_span(variant.id.as_ref(), || {
                last.unwrap_or_else(|| variant.span())
            });
            last = variant.id.as_ref().map(Spanned::span).or(last);

            visited
                .insert(id.get(), (variant.name.get(), id.span()))''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "enum A {\\n  X @3,\\n  Y @2,\\n  Z,\\n}\\n";
    let (_, t) = at(s, "second");
    assert_eq!(t.trim_matches([',', ' ']), "Z", "{}", problem(s));
}
'''}),
 dict(id="clash-unused-first", property="M31", needs="an enum with several type parameters of which a later one is not used",
  breaks="the unused parameter is reported at the place of the first parameter",
  edits=[(V + "generics.rs", '''    for variant in value.variants.values() {
        validate_field_generics(&variant.fields, &mut unvisited);
    }

    unvisited.into_iter().next().map_or(Ok(()), |(name, span)| {
        Err(UnusedGeneric {
            name: name.to_owned(),
            declared: span.into(),''', '''    for variant in value.variants.values() {
        validate_field_generics(&variant.fields, &mut unvisited);
    }

    unvisited.into_iter().next().map_or(Ok(()), |(name, span)| {
        Err(UnusedGeneric {
            name: name.to_owned(),
            declared: generics.types.values().next().map_or(span, Spanned::span).into(),''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "enum A<T, U> {\\n  X { x: T @1 } @1,\\n}\\n";
    assert_eq!(at(s, "declared"), (10, "U"), "{}", problem(s));
}
'''}),
 dict(id="clash-range-previous", property="M31", needs="a field without an explicit id whose derived id is beyond the largest one",
  breaks="an id that can't be represented is reported at the field before",
  edits=[(V + "ids.rs", '''    let mut id_gen = IdGenerator::new();

    match value {
        Fields::Named(_, named) => named.values().try_for_each(|field| {
            validate(id_gen.next_with_span(field.id.as_ref(), || field.span()))
        }),''', '''    let mut id_gen = IdGenerator::new();

    match value {
        Fields::Named(_, named) => {
            let mut previous = None;
            named.values().try_for_each(|field| {
                let fallback = previous.replace(field.span()).unwrap_or(field.span());
                validate(id_gen.next_with_span(field.id.as_ref(), || fallback))
            })
        }''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "struct A { a: u8 @536870911, b: u8 }";
    assert!(at(s, "used").1.starts_with("b: u8"), "{}", problem(s));
}
'''}),
 dict(id="clash-map-value-tuple", property="M31", needs="a map from a valid tuple to a tuple of a single element",
  breaks="a tuple of the wrong size in a map is reported at the key of the map",
  edits=[(V + "tuples.rs", '''fn validate_tuple_size(value: &Type<'_>) -> Result<(), TupleSize> {
    visit_tuples(value, &mut |tuples| {''', '''fn validate_tuple_size(value: &Type<'_>) -> Result<(), TupleSize> {
    if let DataType::HashMap { key, value, .. } = &value.value {
        return validate_tuple_size(key).and_then(|()| {
            validate_tuple_size(value).map_err(|e| TupleSize {
                declared: key.span().into(),
                ..e
            })
        });
    }

    visit_tuples(value, &mut |tuples| {''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "struct A { a: hash_map<(u8, u8), (u16)> @1 }";
    let (i, t) = at(s, "declared");
    assert!(i > 11 && t.contains("(u16)"), "{}", problem(s));
    let s = "struct A { a: vec<(u16)> @1 }";
    assert!(at(s, "declared").1.contains("(u16)"), "{}", problem(s));
}
'''}),
 dict(id="clash-field-other-name", property="M31", needs="three named fields, the third with the id of the first",
  breaks="the error names the field before as the one that used the id already",
  edits=[(V + "ids.rs", '''            named
                .values()
                .find_map(|field| {
                    let id''', '''            let mut before = None;

            named
                .values()
                .find_map(|field| {
                    let before = before.replace(field.name.get());
                    let id'''), (V + "ids.rs", '''                            other_name: other_field.to_owned(),''', '''                            other_name: before.unwrap_or(other_field).to_owned(),''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "struct A { a: u8 @1, b: u8 @2, c: u8 @1 }";
    assert_eq!((field(s, "name"), field(s, "other_name")), ("c".into(), "a".into()), "{}", problem(s));
}
'''}),
]
