M = "crates/mabo-meta/src/lib.rs"
PRE = '''#[allow(dead_code)]
fn hover(src: &str) -> String {
    let p = mabo_parser::Schema::parse(src, None).unwrap();
    let s = mabo_compiler::simplify_schema(&p);
    let mabo_compiler::simplify::Definition::Struct(s) = &s.definitions[0] else { unreachable!() };
    let mut out = String::new();
    mabo_meta::wire_size(&s.fields.fields[0].ty).unwrap().print(&mut out, 0);
    out
}
#[allow(dead_code)]
fn next(src: &str) -> Option<u32> {
    let p = mabo_parser::Schema::parse(src, None).unwrap();
    let s = mabo_compiler::simplify_schema(&p);
    let mabo_compiler::simplify::Definition::Struct(s) = &s.definitions[0] else { unreachable!() };
    mabo_meta::next_field_id(&s.fields)
}
'''
BUGS = [
 dict(id="meta-array-count", property="M20", needs="an array of 65536 elements or more",
  breaks="the announced size of the array is that of a much shorter one",
  edits=[(M, "wire_size_array(ty, *size)", "wire_size_array(ty, *size & 0xffff)")],
  files={"main.rs": PRE + '''fn main() {
    let t = hover("struct A { a: [u8; 70000] @1 }");
    assert!(t.starts_with("**array** `70003`"), "{t}");
}
'''}),
 dict(id="meta-tuple-elements", property="M20", needs="a tuple of more than eight elements",
  breaks="the size of the tuple leaves out its last elements",
  edits=[(M, "        .iter()\n        .enumerate()\n        .map(|(i, ty)| (i.to_string().into(), wire_size(ty)))", "        .iter()\n        .enumerate()\n        .take(8)\n        .map(|(i, ty)| (i.to_string().into(), wire_size(ty)))")],
  files={"main.rs": PRE + '''fn main() {
    let t = hover("struct A { a: (u8, u8, u8, u8, u8, u8, u8, u8, u8) @1 }");
    assert!(t.lines().count() == 10, "{t}");
}
'''}),
 dict(id="meta-print-large", property="M20", needs="a size of more than a thousand bytes whose bounds differ",
  breaks="the size is shown as a fixed one",
  edits=[(M, "Some(max) if self.min == max => ", "Some(max) if self.min == max || max > 1000 => ")],
  files={"main.rs": PRE + '''fn main() {
    let t = hover("struct A { a: [u32; 400] @1 }");
    assert!(t.starts_with("**array** `402..2002`"), "{t}");
}
'''}),
]
