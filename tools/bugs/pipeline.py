B = "crates/mabo-build/src/lib.rs"
G = "crates/mabo-go/src/main.rs"
C = "crates/mabo-cli/src/main.rs"
P = "crates/mabo-project/src/lib.rs"
HEAD = '''#!/bin/bash
# Builds the tool in a scratch directory and runs it on schemas that are made there.
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export CARGO_TARGET_DIR="$tmp/target" CARGO_NET_OFFLINE=true
cargo build --offline -q -p %s || exit 0
bin="$tmp/target/debug/%s"
p="$tmp/project"; mkdir -p "$p"; cd "$p"
printf '[package]\\nname = "demo"\\nfiles = ["**/*.mabo"]\\n' > Mabo.toml
'''
CLI = HEAD % ("mabo-cli", "mabo")
GO = HEAD % ("mabo-go", "mabo-go")
PRE = '''use std::{fs, path::{Path, PathBuf}};
fn scratch(name: &str, files: &[(&str, &str)]) -> PathBuf {
    let dir = std::env::temp_dir().join(format!("mabo-demo-{}-{name}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    for (f, c) in files {
        let f = dir.join(f);
        fs::create_dir_all(f.parent().unwrap()).unwrap();
        fs::write(f, c).unwrap();
    }
    dir
}
fn toml(p: &str) -> String { format!("[package]\\nname = \\"demo\\"\\nfiles = [{p}]\\n") }
#[allow(dead_code)]
fn rel(base: &Path, files: &[PathBuf]) -> Vec<String> {
    let mut v: Vec<_> = files.iter().map(|f| f.strip_prefix(base).unwrap().to_str().unwrap().to_owned()).collect();
    v.sort();
    v
}
'''
BUILD = PRE + '''fn compile(dir: &Path) -> Result<(), String> {
    let out = dir.join("out");
    fs::create_dir_all(&out).unwrap();
    unsafe { std::env::set_var("OUT_DIR", &out) };
    mabo_build::Compiler::default().compile(dir.to_str().unwrap()).map_err(|e| e.to_string())
}
'''
BUGS = [
 dict(id="build-stem-extension", property="M17", needs="a schema file with a dot in its name besides the one of the extension",
  breaks="the generated code of `a.v1.mabo` lands in `a.rs`, where `include!` doesn't find it and where it meets that of `a.v2.mabo`",
  edits=[(B, """out_dir.join(format!("{stem}.rs"));""", """out_dir.join(stem).with_extension("rs");""")],
  files={"main.rs": BUILD + '''fn main() {
    let d = scratch("stem", &[("Mabo.toml", &toml("\\"*.mabo\\"")), ("a.v1.mabo", "struct A { a: u8 @1 }"), ("a.v2.mabo", "struct B { a: u8 @1 }")]);
    let r = compile(&d);
    let found = ["a.v1.rs", "a.v2.rs"].map(|f| d.join("out/mabo").join(f).exists());
    fs::remove_dir_all(&d).unwrap();
    assert!(r.is_ok() && found == [true, true]);
}
'''}),
 dict(id="build-resolve-single", property="M17", needs="a project with only one schema, which names a type that doesn't exist",
  breaks="code is generated for a schema whose types don't resolve",
  edits=[(B, """        mabo_compiler::resolve_schemas(&validated).map_err(|e| Error::Compile {
            report: Report::new(e),
            file: PathBuf::new(),
        })?;
""", """        if validated.len() > 1 {
            mabo_compiler::resolve_schemas(&validated).map_err(|e| Error::Compile {
                report: Report::new(e),
                file: PathBuf::new(),
            })?;
        }
""")],
  files={"main.rs": BUILD + '''fn main() {
    let d = scratch("one", &[("Mabo.toml", &toml("\\"*.mabo\\"")), ("a.mabo", "struct A { a: Missing @1 }")]);
    let r = compile(&d);
    let found = d.join("out/mabo/a.rs").exists();
    fs::remove_dir_all(&d).unwrap();
    assert!(r.is_err() && !found);
}
'''}),
 dict(id="go-validate-late", property="M17", needs="a project with several schemas, of which a later one doesn't pass validation",
  breaks="the Go generator writes the code of the schemas before the invalid one, then fails",
  edits=[(G, """            let schema = Schema::parse(input, Some(path))?;
            mabo_compiler::validate_schema(&schema)?;

            Ok((stem, schema))""", """            let schema = Schema::parse(input, Some(path))?;

            Ok((stem, schema))"""), (G, """    for (_, schema) in validated {
        let schema""", """    for (_, schema) in validated {
        mabo_compiler::validate_schema(schema)?;
        let schema""")],
  files={"demo.sh": GO + '''for n in a b c d; do echo "struct A { a: u8 @1 }" > $n.mabo; done
for n in e f g h; do echo "struct A { a: u8 @1, b: u8 @1 }" > $n.mabo; done
"$bin" --no-fmt --out-dir "$tmp/out" && exit 1
[ -z "$(find "$tmp/out" -name '*.go' 2>/dev/null)" ]
'''}),
 dict(id="go-module-parent", property="M17", needs="modules nested two levels deep, of which two inner ones have the same name",
  breaks="inner modules are all written beside the outer ones, where those of the same name replace each other",
  edits=[(G, """        write_output(module, &path)?;""", """        write_output(module, if path.ends_with(output.name) && parent.join("go.mod").exists() { &path } else { parent })?;""")],
  files={"demo.sh": GO + '''echo "mod a { mod x { struct A { a: u8 @1 } } } mod b { mod x { struct B { a: u8 @1 } } }" > s.mabo
"$bin" --no-fmt --out-dir "$tmp/out" || exit 1
[ "$(find "$tmp/out" -name 'x.go' | wc -l)" = 2 ]
'''}),
 dict(id="build-write-exists", property="M17", needs="a file of the output directory that cannot be written",
  breaks="a failed write of generated code is taken for success if something is there already",
  edits=[(B, """            fs::write(&out_file, code).map_err(|source| Error::Write {
                source,
                file: out_file,
            })?;
""", """            match fs::write(&out_file, code) {
                Err(_) if out_file.exists() => {}
                res => res.map_err(|source| Error::Write {
                    source,
                    file: out_file,
                })?,
            }
""")],
  files={"main.rs": BUILD + '''fn main() {
    let d = scratch("write", &[("Mabo.toml", &toml("\\"*.mabo\\"")), ("a.mabo", "struct A { a: u8 @1 }"), ("out/mabo/a.rs/x", "")]);
    let r = compile(&d);
    fs::remove_dir_all(&d).unwrap();
    assert!(r.is_err());
}
'''}),
 dict(id="fmt-trailing", property="M18", needs="a file that differs from its formatted form only in white space at the end",
  breaks="such files are left as they are",
  edits=[(C, "        if buf != formatted {", "        if buf.trim_end() != formatted.trim_end() {")],
  files={"demo.sh": CLI + '''printf 'struct A {\\n    a: u8 @1,\\n}\\n\\n\\n\\n' > a.mabo
"$bin" fmt || exit 1
[ "$(tail -c 3 a.mabo | od -An -tx1 | tr -d ' ')" != 0a0a0a ]
'''}),
 dict(id="patterns-stop", property="M18", needs="a pattern that matches a file of another type before a schema",
  breaks="the files after the first one that is no schema are neither checked nor formatted",
  edits=[(C, """ ext != "mabo") {
                    continue;""", """ ext != "mabo") {
                    break;""")],
  files={"demo.sh": CLI + '''echo "not a schema" > a.txt
echo "struct A { a: " > b.mabo
! "$bin" check '*'
'''}),
 dict(id="fmt-unreadable", property="M18", needs="a schema file that is not valid UTF-8",
  breaks="files that cannot be read are silently passed over",
  edits=[(C, """        let buf = fs::read_to_string(&file)?;
        let schema = match""", """        let Ok(buf) = fs::read_to_string(&file) else {
            continue;
        };
        let schema = match""")],
  files={"demo.sh": CLI + '''printf '/// \\xff\\nstruct A { a: u8 @1 }\\n' > b.mabo
! "$bin" fmt
'''}),
 dict(id="doc-module-parent", property="M18", needs="documentation of modules nested two levels deep with inner modules of the same name",
  breaks="the pages of inner modules replace each other",
  edits=[(C, "        write_doc_output(module, &path)?;", "        write_doc_output(module, if output.modules.len() > 1 { &path } else { parent })?;")],
  files={"demo.sh": CLI + '''echo "mod a { mod x { struct A { a: u8 @1 } } } mod b { mod x { struct B { a: u8 @1 } } }" > s.mabo
"$bin" doc --out-dir "$tmp/out" 2>/dev/null || "$bin" doc "$tmp/out" || exit 1
find "$tmp/out"
[ "$(find "$tmp/out" -path '*/x/*' -name index.html | wc -l)" = 2 ]
'''}),
 dict(id="pattern-file-name", property="M19", needs="a pattern with a directory, or a file in a directory that a pattern for the top directory should not reach",
  breaks="patterns without a directory match files of all directories",
  edits=[(P, """        if patterns.is_match(path) && path""", """        if (patterns.is_match(path) || path.file_name().is_some_and(|n| patterns.is_match(n))) && path""")],
  files={"main.rs": PRE + '''fn main() {
    let d = scratch("name", &[("Mabo.toml", &toml("\\"*.mabo\\"")), ("a.mabo", ""), ("sub/b.mabo", "")]);
    let r = mabo_project::load(&d).unwrap().files;
    let r = rel(&d, &r);
    fs::remove_dir_all(&d).unwrap();
    assert_eq!(r, ["a.mabo"]);
}
'''}),
 dict(id="walk-error-skip", property="M19", needs="a directory that cannot be read, or a link that leads nowhere",
  breaks="what the walk cannot read is left out without an error",
  edits=[(P, """        let entry = entry.map_err(Error::Walk)?;
        let path""", """        let Ok(entry) = entry.map_err(Error::Walk) else {
            continue;
        };
        let path""")],
  files={"main.rs": PRE + '''fn main() {
    let d = scratch("walk", &[("Mabo.toml", &toml("\\"*.mabo\\"")), ("a.mabo", "")]);
    std::os::unix::fs::symlink(d.join("nowhere"), d.join("b.mabo")).unwrap();
    let r = mabo_project::load(&d).is_err();
    fs::remove_dir_all(&d).unwrap();
    assert!(r);
}
'''}),
 dict(id="pattern-invalid-skip", property="M19", needs="an invalid pattern beside valid ones",
  breaks="invalid patterns are passed over, their files left out",
  edits=[(P, """        .try_fold(GlobSetBuilder::new(), |mut set, pattern| {
            set.add(pattern?);
            Ok(set)
        })?
""", """        .try_fold(GlobSetBuilder::new(), |mut set, pattern: Result<_>| {
            if let Ok(pattern) = pattern {
                set.add(pattern);
            }
            Ok::<_, Error>(set)
        })?
""")],
  files={"main.rs": PRE + '''fn main() {
    let d = scratch("glob", &[("Mabo.toml", &toml("\\"*.mabo\\", \\"[x.mabo\\"")), ("a.mabo", "")]);
    let r = mabo_project::load(&d).is_err();
    fs::remove_dir_all(&d).unwrap();
    assert!(r);
}
'''}),
 dict(id="walk-depth", property="M19", needs="a schema file nested more than eight directories deep",
  breaks="deeply nested files are left out",
  edits=[(P, """        .skip_stdout(true)
        .build();""", """        .skip_stdout(true)
        .max_depth(Some(8))
        .build();""")],
  files={"main.rs": PRE + '''fn main() {
    let d = scratch("deep", &[("Mabo.toml", &toml("\\"**/*.mabo\\"")), ("a.mabo", ""), ("1/2/3/4/5/6/7/8/9/b.mabo", "")]);
    let n = mabo_project::load(&d).unwrap().files.len();
    fs::remove_dir_all(&d).unwrap();
    assert_eq!(n, 2);
}
'''}),
]
