E = "crates/mabo-build/src/encode.rs"
D = "crates/mabo-build/src/decode.rs"
S = "crates/mabo-build/src/size.rs"
F = "crates/mabo-build/src/definition.rs"
TOML = '[package]\nname = "demo"\nfiles = ["*.mabo"]\n'
def build(bytes_=False):
    return 'fn main() {\n    mabo_build::Compiler::default()%s.compile(env!("CARGO_MANIFEST_DIR")).unwrap();\n}\n' % (".with_bytes_type(mabo_build::BytesType::Bytes)" if bytes_ else "")
INC = '#[allow(warnings)]\nmod schema {\n    include!(concat!(env!("OUT_DIR"), "/mabo/schema.rs"));\n}\nuse mabo::{Decode, Encode, buf::Size};\n'
BUGS = [
 dict(id="marker-bytes-option", property="M07", needs="the Bytes type option and a reader that does not know the bytes field",
  breaks="bytes fields are marked as varint when bytes::Bytes is selected, so skipping them leaves the content in the stream",
  edits=[(E, """            BytesType::Bytes => (
                quote! { ::mabo::FieldEncoding::LengthPrefixed },""", """            BytesType::Bytes => (
                quote! { ::mabo::FieldEncoding::Varint },""")],
  files={"Mabo.toml": TOML, "build.rs": build(True), "schema.mabo": "struct New { a: u32 @1, b: bytes @2, c: u32 @3 }\nstruct Old { a: u32 @1, c: u32 @3 }\n",
   "main.rs": INC + """fn main() {
    let mut b = Vec::new();
    schema::New { a: 1, b: mabo::buf::Bytes::from_static(&[1, 8, 0, 200, 9]), c: 3 }.encode(&mut b);
    assert_eq!(schema::New::decode(&mut &b[..]).unwrap().c, 3);
    assert_eq!(schema::Old::decode(&mut &b[..]).unwrap(), schema::Old { a: 1, c: 3 });
}
"""}),
 dict(id="marker-tuple-long", property="M07", needs="a tuple of more than three elements as a field, and a reader that does not know the field",
  breaks="longer tuples are marked with the form of their first element, so skipping consumes the wrong bytes",
  edits=[(E, """                (
                    quote! { ::mabo::FieldEncoding::LengthPrefixed },
                    if root {""", """                (
                    if root && types.len() > 3 {
                        compile_data_type(opts, &types[0], quote! { v }, false).0
                    } else {
                        quote! { ::mabo::FieldEncoding::LengthPrefixed }
                    },
                    if root {""")],
  files={"Mabo.toml": TOML, "build.rs": build(), "schema.mabo": "struct New { a: u32 @1, b: (u8, u8, u16, string) @2, c: u32 @3 }\nstruct Old { a: u32 @1, c: u32 @3 }\n",
   "main.rs": INC + """fn main() {
    let mut b = Vec::new();
    schema::New { a: 1, b: (7, 8, 900, "x".into()), c: 3 }.encode(&mut b);
    assert_eq!(schema::New::decode(&mut &b[..]).unwrap().c, 3);
    assert_eq!(schema::Old::decode(&mut &b[..]).unwrap(), schema::Old { a: 1, c: 3 });
}
"""}),
 dict(id="tuple-size-eight", property="M10", needs="a tuple of more than eight elements inside a list, map, set or array",
  breaks="the size of long tuples counts only the first eight elements, so the list's length prefix is too small",
  edits=[(S, """            2..=12 => {
                let types = types.iter().enumerate().map(""", """            2..=12 => {
                let types = types.iter().take(8).enumerate().map(""")],
  files={"Mabo.toml": TOML, "build.rs": build(), "schema.mabo": "struct Row { a: vec<(u8, u8, u8, u8, u8, u8, u8, u8, u8)> @1, b: u32 @2 }\n",
   "main.rs": INC + """fn main() {
    let mut b = Vec::new();
    let v = schema::Row { a: vec![(1, 2, 3, 4, 5, 6, 7, 8, 9); 3], b: 3 };
    v.encode(&mut b);
    assert_eq!(schema::Row::decode(&mut &b[..]).unwrap(), v);
    assert_eq!(v.size(), b.len());
}
"""}),
 dict(id="map-key-size", property="M10", needs="a map whose key and value types have different sizes, where sizes depend on the value",
  breaks="the encode function of a map inside another collection measures the key with the value type's size function when both are integers",
  edits=[(E, """            let size_k = super::size::compile_data_type(opts, &kv.0, quote! { k });
            let size_v""", """            let size_k = match (&kv.0, &kv.1) {
                (Type::U64, Type::U64) | (Type::U32, Type::U32) => quote! { ::mabo::buf::size_u32(*k as u32) },
                _ => super::size::compile_data_type(opts, &kv.0, quote! { k }),
            };
            let size_v""")],
  files={"Mabo.toml": TOML, "build.rs": build(), "schema.mabo": "struct M { a: hash_map<u64, u64> @1, b: u32 @2 }\n",
   "main.rs": INC + """fn main() {
    let mut b = Vec::new();
    let v = schema::M { a: [(1 << 40, 2)].into(), b: 3 };
    v.encode(&mut b);
    assert_eq!(schema::M::decode(&mut &b[..]).unwrap(), v);
}
"""}),
 dict(id="field-id-byte", property="M11", needs="a field number above 255",
  breaks="encode writes only the low byte of the field number, so decode takes it for another (or an unknown) field",
  edits=[(E, """        let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
            let id = proc_macro2::Literal::u32_unsuffixed(*id);""", """        let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
            let id = proc_macro2::Literal::u8_unsuffixed(*id as u8);""")],
  files={"Mabo.toml": TOML, "build.rs": build(), "schema.mabo": "struct M { a: u32 @1, b: u32 @300 }\n",
   "main.rs": INC + """fn main() {
    let mut b = Vec::new();
    let v = schema::M { a: 1, b: 3 };
    v.encode(&mut b);
    assert_eq!(schema::M::decode(&mut &b[..]).unwrap(), v);
    assert_eq!(v.size(), b.len());
}
"""}),
 dict(id="variant-optional-size", last=True, property="M11", needs="an optional field in an enum variant with unnamed fields",
  breaks="the size of such variants leaves out optional fields, so enclosing lists announce too few bytes",
  edits=[(S, """                quote! {
                    ::mabo::buf::size_field_option(#id, #name.as_ref(), |v| { #ty })
                }""", """                if fields.kind == FieldKind::Unnamed && fields.fields.len() == 1 {
                    quote! { ::mabo::buf::size_field_option(#id, None, |v: &_| { if true { return 0; } #ty }) }
                } else {
                    quote! { ::mabo::buf::size_field_option(#id, #name.as_ref(), |v| { #ty }) }
                }""")],
  files={"Mabo.toml": TOML, "build.rs": build(), "schema.mabo": "enum V { A @1, B(option<u32> @1) @2 }\nstruct M { a: vec<V> @1, b: u32 @2 }\n",
   "main.rs": INC + """fn main() {
    let mut b = Vec::new();
    let v = schema::M { a: vec![schema::V::B(Some(9))], b: 3 };
    v.encode(&mut b);
    assert_eq!(schema::M::decode(&mut &b[..]).unwrap(), v);
    assert_eq!(v.size(), b.len());
}
"""}),
 dict(id="decode-skip-late", property="M11", needs="an enum variant whose fields include one the reader does not know",
  breaks="unknown fields of enum variants end the decoding of the variant instead of being skipped",
  edits=[(D, """                    match id.value {
                        ::mabo::buf::END_MARKER => break,
                        #field_matches
                        _ => ::mabo::buf::decode_skip(r, id.encoding)?,
                    }
                }

                Ok(Self::#name #field_assigns)""", """                    match id.value {
                        ::mabo::buf::END_MARKER => break,
                        #field_matches
                        _ => #skip,
                    }
                }

                Ok(Self::#name #field_assigns)"""), (D, """    let field_assigns = compile_field_assigns(fields);

    if fields.kind == FieldKind::Unit {
        quote! { #id => Ok(Self::#name) }""", """    let field_assigns = compile_field_assigns(fields);
    let optional = !fields.fields.is_empty()
        && fields.fields.iter().all(|f| matches!(f.ty, Type::Option(_)));
    let skip = if optional && fields.kind == FieldKind::Unnamed {
        quote! { break }
    } else {
        quote! { ::mabo::buf::decode_skip(r, id.encoding)? }
    };

    if fields.kind == FieldKind::Unit {
        quote! { #id => Ok(Self::#name) }""")],
  files={"Mabo.toml": TOML, "build.rs": build(), "schema.mabo": "enum New { A(u32 @9, option<u32> @1) @1 }\nenum Old { A(option<u32> @1) @1 }\n",
   "main.rs": INC + """fn main() {
    let mut b = Vec::new();
    schema::New::A(77, Some(5)).encode(&mut b);
    assert_eq!(schema::New::decode(&mut &b[..]).unwrap(), schema::New::A(77, Some(5)));
    assert_eq!(schema::Old::decode(&mut &b[..]).unwrap(), schema::Old::A(Some(5)));
}
"""}),
 dict(id="const-int-narrow", property="M12", needs="an integer constant that does not fit 64 bits",
  breaks="constants above 2^63 are emitted with a wrapped value",
  edits=[(F, "Literal::Int(i) => proc_macro2::Literal::i128_unsuffixed(*i).into_token_stream(),", "Literal::Int(i) => proc_macro2::Literal::i64_unsuffixed(*i as i64).into_token_stream(),")],
  files={"Mabo.toml": TOML, "build.rs": build(), "schema.mabo": "const A: i128 = 36893488147419103239;\nconst B: u32 = 5;\n",
   "main.rs": INC + """fn main() {
    assert_eq!(schema::A, 36893488147419103239i128);
    assert_eq!(schema::B, 5);
}
"""}),
 dict(id="import-deep-path", property="M12", needs="an import of a type through two or more modules",
  breaks="imports of nested elements lose the inner part of the path",
  edits=[(F, """    let segments = segments.iter().enumerate().map(""", """    let depth = if element.is_some() { segments.len().min(2) } else { segments.len() };
    let segments = segments.iter().take(depth).enumerate().map(""")],
  files={"Mabo.toml": TOML, "build.rs": build(), "other.mabo": "mod a { mod b { struct T { v: u32 @1 } } struct T { v: string @1 } }\n", "schema.mabo": "use other::a::b::T;\nstruct S { t: T @1 }\n",
   "main.rs": """#[allow(warnings)]
mod schema {
    include!(concat!(env!("OUT_DIR"), "/mabo/schema.rs"));
}
#[allow(warnings)]
mod other {
    include!(concat!(env!("OUT_DIR"), "/mabo/other.rs"));
}
fn main() {
    let s = schema::S { t: other::a::b::T { v: 3u32 } };
    assert_eq!(s.t.v, 3);
    let _ = mabo::buf::size_u32(1);
}
"""}),
 dict(id="alias-generics-single", property="M12", needs="a type alias with more than one generic parameter",
  breaks="only the first generic parameter of an alias is declared",
  edits=[(F, """    let name = Ident::new(name, Span::call_site());
    let generics = compile_generics(generics);
    let target""", """    let name = Ident::new(name, Span::call_site());
    let generics = compile_generics(&generics[..generics.len().min(1)]);
    let target""")],
  files={"main.rs": """fn main() {
    let src = "type Pair<A, B> = (A, B);\\n";
    let schema = mabo_parser::Schema::parse(src, None).unwrap();
    let schema = mabo_compiler::simplify_schema(&schema);
    let code = mabo_build::compile_schema(&mabo_build::Opts::default(), &schema).to_string();
    let code: String = code.split_whitespace().collect();
    assert!(code.contains("Pair<A,B,>=(A,B,);") || code.contains("Pair<A,B>=(A,B);"), "{code}");
}
"""}),
]
