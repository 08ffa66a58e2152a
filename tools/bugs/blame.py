R = "crates/mabo-compiler/src/resolve/mod.rs"
PRE = '''use mabo_parser::Schema;
/// the error for some schemas
#[allow(dead_code)]
fn problem(src: &[(&str, &str)]) -> String {
    let s: Vec<_> = src.iter().map(|(n, s)| (*n, Schema::parse(s, None).unwrap())).collect();
    let v: Vec<_> = s.iter().map(|(n, s)| (*n, s)).collect();
    format!("{:?}", mabo_compiler::resolve_schemas(&v).unwrap_err())
}
/// what stands behind a word in the error
#[allow(dead_code)]
fn after(p: &str, key: &str) -> String {
    let k = format!("{key}: ");
    let i = p.rfind(&k).unwrap_or_else(|| panic!("no {key} in {p}")) + k.len();
    p[i..].split([',', ' ', '}', '"']).find(|x| !x.is_empty()).unwrap().to_owned()
}
/// text at a place
#[allow(dead_code)]
fn at<'a>(s: &'a str, place: &str) -> (usize, &'a str) {
    let (a, b) = place.split_once("..").unwrap();
    let a: usize = a.parse().unwrap();
    (a, &s[a..b.parse().unwrap()])
}
'''
BUGS = [
 dict(id="blame-search-end", property="M34", needs="a path through an imported module where a segment after the first existing one is missing",
  breaks="the error gives the imported module as the end of the search, not the module that was reached",
  edits=[(R, '''        let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
            module.modules.get(name.get()).ok_or_else(|| MissingModule {
                name: name.get().to_owned(),
                path: module.path_to_string(),''', '''        let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
            module.modules.get(name.get()).ok_or_else(|| MissingModule {
                name: name.get().to_owned(),
                path: self.path_to_string(),''')],
  files={"main.rs": PRE + '''fn main() {
    let b = ("b", "mod c { mod d { struct E(u8 @1) } }");
    let p = problem(&[("a", "use b; struct A(b::x::E @1)"), b]);
    assert_eq!((after(&p, "path"), after(&p, "name")), ("b".into(), "x".into()), "{p}");
    let p = problem(&[("a", "use b; struct A(b::c::x::E @1)"), b]);
    assert_eq!((after(&p, "path"), after(&p, "name")), ("b::c".into(), "x".into()), "{p}");
}
'''}),
 dict(id="blame-import-segment", property="M34", needs="an import of a type or nested module through a module that doesn't exist",
  breaks="the place of the error is the last segment of the import instead of the missing one",
  edits=[(R, '''                .try_fold(self, |module, name| {
                    module.modules.get(name.get()).ok_or_else(|| MissingModule {
                        name: name.get().to_owned(),
                        path: module.path_to_string(),
                        used: name.span().into(),''', '''                .try_fold(self, |module, name| {
                    module.modules.get(name.get()).ok_or_else(|| MissingModule {
                        name: name.get().to_owned(),
                        path: module.path_to_string(),
                        used: import.segments[import.segments.len() - 1].span().into(),''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "use b::missing::deeper::more;";
    let p = problem(&[("a", s), ("b", "mod c {}")]);
    assert_eq!(at(s, &after(&p, "used")), (7, "missing"), "{p}");
    let s = "use b::missing;";
    let p = problem(&[("a", s), ("b", "mod c {}")]);
    assert_eq!(at(s, &after(&p, "used")), (7, "missing"), "{p}");
}
'''}),
 dict(id="blame-nested-path", property="M34", needs="a defect in a module that is nested at least four levels deep",
  breaks="the path of a module has its parent left out",
  edits=[(R, '''        new.extend(path);
        new.push(name);''', '''        new.extend(path.iter().take(3));
        new.push(name);''')],
  files={"main.rs": PRE + '''fn main() {
    let p = problem(&[("a", "mod b { mod c { mod d { mod e { struct A(X @1) } } } }")]);
    assert_eq!(after(&p, "path"), "a::b::c::d::e", "{p}");
}
'''}),
 dict(id="blame-import-path", property="M34", needs="a type with a path of several segments whose first one isn't imported",
  breaks="the type is named without the middle of its path",
  edits=[(R, '''                            .path
                            .iter()
                            .fold(''', '''                            .path
                            .first()
                            .into_iter()
                            .fold(''')],
  files={"main.rs": PRE + '''fn main() {
    let p = problem(&[("a", "use b; struct A(x::y::z::E @1)"), ("b", "mod x {}")]);
    assert_eq!(after(&p, "ty"), "x::y::z::E", "{p}");
}
'''}),
 dict(id="blame-imported-count", property="M34", needs="a directly imported type that is used with a wrong number of arguments",
  breaks="the place of the declaration is the place of the use",
  edits=[(R, '''                            .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
                        schema.source.to_owned(),
                    ),
                    used: name.span().into(),''', '''                            .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
                        schema.source.to_owned(),
                    ),
                    used: ty.external.name.span().into(),'''), (R, "if let Some((schema, name, generics)) = found {", "if let Some((schema, _, generics)) = found {")],
  files={"main.rs": PRE + '''fn main() {
    let (a, b) = ("use b::B; struct A(B<u8> @1)", "struct First(u8 @1) struct B(u8 @1)");
    let p = problem(&[("a", a), ("b", b)]);
    let d = &p[p.find("declaration").unwrap()..];
    assert_eq!(at(b, &after(d, "used")), (27, "B"), "{p}");
}
'''}),
 dict(id="blame-first-module", property="M34", needs="a type that fails in a path through two modules of which the outer one has a type of that name",
  breaks="the number of type parameters and the place of the declaration are taken from the first of the types with that name on the way",
  edits=[(R, '''        let definition = module
            .types
            .iter()
            .find(|type_def| type_def.name.get() == ty.name.get())
            .ok_or_else(|| MissingDefinition {
                name: ty.name.get().to_owned(),
                path: module.path_to_string(),
                used: ty.name.span().into(),
            })?;

        match definition.kind {
            DeclarationKind::Struct { generics } | DeclarationKind::Enum { generics }
                if generics != ty.generics.as_ref().map_or(0, Punctuated::len) =>
            {
                Err(GenericsCount {
                    definition: generics,
                    usage: ty.generics.as_ref().map_or(0, Punctuated::len),
                    declared: definition.name.span().into(),''', '''        let definition = module
            .types
            .iter()
            .find(|type_def| type_def.name.get() == ty.name.get())
            .ok_or_else(|| MissingDefinition {
                name: ty.name.get().to_owned(),
                path: module.path_to_string(),
                used: ty.name.span().into(),
            })?;
        let declared = self
            .types
            .iter()
            .find(|type_def| type_def.name.get() == ty.name.get())
            .unwrap_or(definition);

        match definition.kind {
            DeclarationKind::Struct { generics } | DeclarationKind::Enum { generics }
                if generics != ty.generics.as_ref().map_or(0, Punctuated::len) =>
            {
                Err(GenericsCount {
                    definition: generics,
                    usage: ty.generics.as_ref().map_or(0, Punctuated::len),
                    declared: declared.name.span().into(),''')],
  files={"main.rs": PRE + '''fn main() {
    let s = "struct G(u8 @1) mod m { struct G<T>(T @1) } struct A(m::G @1)";
    let p = problem(&[("a", s)]);
    assert_eq!(at(s, &after(&p, "declared")), (31, "G"), "{p}");
}
'''}),
 dict(id="blame-last-source", property="M34", needs="a broken import in a schema whose file is in a directory",
  breaks="the error of a broken import is shown with the file name only, without its directory",
  edits=[(R, '''                .map_or_else(|| "<unknown>".to_owned(), |p| p.display().to_string()),
            schema.source.to_owned(),
        ),
        cause: ResolveError::Import(e.into()),''', '''                .and_then(|p| p.file_name())
                .map_or_else(|| "<unknown>".to_owned(), |p| p.to_string_lossy().into_owned()),
            schema.source.to_owned(),
        ),
        cause: ResolveError::Import(e.into()),''')],
  files={"main.rs": '''use mabo_parser::Schema;
fn main() {
    let a = Schema::parse("use gone;", Some("some/dir/a.mabo".as_ref())).unwrap();
    let p = format!("{:?}", mabo_compiler::resolve_schemas(&[("a", &a)]).unwrap_err());
    assert!(p.contains("some/dir/a.mabo"), "{p}");
}
'''}),
]
