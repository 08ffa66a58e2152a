import os
HERE = "/verif/tools/"
L = open(HERE + "lsp_client.py").read()
D = open(HERE + "demo_lsp.sh").read()
H = "crates/mabo-lsp/src/handlers/"
A = "crates/mabo-lsp/src/main.rs"
M = H + "mod.rs"
def f(test):
    return {"lsp.py": L, "demo.sh": D, "test.py": '''import sys, queue
from lsp import Server, rng
s = Server(sys.argv[1])
U, V = "file:///x/a.mabo", "file:///x/a.mabo2"
T = "struct A {\\n    a: u8 @1,\\n}\\n"
def names(u):
    return [(x["name"], [c["name"] for c in x["children"] or []]) for x in s.symbols(u)]
''' + test}
BUGS = [
 dict(id="edits-index-lines", property="M24", needs="two notifications in a row, the first of which changes the width of a line but not the number of lines",
  breaks="the second change is located with the lines of the old text and ends up in another place",
  edits=[(M, "    heads.index.update(LineIndex::new(&text));\n", "    if text.lines().count() != heads.content.lines().count() {\n        heads.index.update(LineIndex::new(&text));\n    }\n"),
         (M, "                // Every change refers to the state of the document after the previous one.\n                index.update(LineIndex::new(&String::from(&*rope)));\n", "                // Every change refers to the state of the document after the previous one.\n                if change.text.contains('\\n') || range.len() != 0.into() {\n                    index.update(LineIndex::new(&String::from(&*rope)));\n                }\n")],
  files=f('''s.open(U, T)
s.change(U, [{"range": rng(0, 7, 0, 7), "text": "Long"}])
s.change(U, [{"range": rng(1, 4, 1, 5), "text": "b"}])
assert names(U) == [("LongA", ["b"])], names(U)
''')),
 dict(id="open-same-length", property="M24", needs="a document that is opened again with another text of the same length",
  breaks="the old text is kept",
  edits=[(M, ".filter(|file| file.borrow_content().as_ref() == text)", ".filter(|file| file.borrow_content().len() == text.len())")],
  files=f('''s.open(U, T)
s.open(U, T.replace("A", "B"))
assert names(U) == [("B", ["a"])], names(U)
''')),
 dict(id="change-first-full", property="M24", needs="one notification with a new text followed by changes of it",
  breaks="the changes after the new text are dropped",
  edits=[(M, "changes.len() == 1 && changes.first().is_some_and(|change| change.range.is_none())", "changes.first().is_some_and(|change| change.range.is_none())")],
  files=f('''s.open(U, "")
s.change(U, [{"text": T}, {"range": rng(0, 7, 0, 8), "text": "B"}])
assert names(U) == [("B", ["a"])], names(U)
''')),
 dict(id="delete-prefix", property="M24", needs="two documents, the name of one being the start of the other's",
  breaks="deleting one drops the other as well",
  edits=[(M, "file.uri == uri.as_str()", "uri.as_str().starts_with(&file.uri)")],
  files=f('''s.open(U, T)
s.open(V, T)
s.notify("workspace/didDeleteFiles", {"files": [{"uri": U}]})
assert names(U) == [] and names(V) == [("A", ["a"])]
''')),
 dict(id="request-malformed", property="M25", needs="a request with parameters that are not those of its method",
  breaks="the request is never answered",
  edits=[(A, """            return conn
                .sender
                .send(Response::new_err(id, ErrorCode::InvalidParams as _, e.to_string()).into())
                .map_err(Into::into);
""", """            error!(error:err = e, id:% = id; "invalid request parameters");
            return Ok(());
""")],
  files=f('''s.open(U, T)
try:
    r = s.request("textDocument/hover", {"textDocument": {"uri": U}}, 5)
except queue.Empty:
    sys.exit("no answer")
assert "error" in r
''')),
 dict(id="request-optional", property="M25", needs="a request whose method starts with `$/`",
  breaks="the request is never answered",
  edits=[(A, """                    _ => {
                        debug!(request:? = req; "got unsupported request");
""", """                    method if method.starts_with("$/") => {
                        debug!(request:? = req; "ignored optional request");
                    }
                    _ => {
                        debug!(request:? = req; "got unsupported request");
""")],
  files=f('''try:
    r = s.request("$/progress", {}, 5)
except queue.Empty:
    sys.exit("no answer")
assert "error" in r
''')),
 dict(id="shutdown-early", property="M25", needs="the end of a session: shutdown, then exit",
  breaks="the shutdown request is not answered",
  edits=[(A, """                if conn.handle_shutdown(&req)? {
                    info!("shutting down");
                    return Ok(());
                }

                match req.method.as_str() {
                    Shutdown::METHOD => {
                        warn!("should never reach this");
                    }
""", """                if req.method == "exit" && conn.handle_shutdown(&req)? {
                    info!("shutting down");
                    return Ok(());
                }

                match req.method.as_str() {
                    Shutdown::METHOD => {
                        warn!("shutting down");
                        return Ok(());
                    }
""")],
  files=f('''try:
    r = s.request("shutdown", None, 5)
except (queue.Empty, EOFError):
    sys.exit("no answer")
assert "error" not in r
s.notify("exit", None)
assert s.p.wait(10) == 0
''')),
 dict(id="delete-as-close", property="M25", needs="a file that is deleted in the editor",
  breaks="the notification is taken for another one and ignored",
  edits=[(A, "handle_notify::<DidDeleteFiles>(&mut state, notif, handlers::did_delete);", "handle_notify::<lsp_types::notification::DidRenameFiles>(&mut state, notif, |state, params| {\n                        handlers::did_delete(state, lsp_types::DeleteFilesParams { files: params.files.into_iter().map(|f| lsp_types::FileDelete { uri: f.old_uri }).collect() });\n                    });")],
  files=f('''s.open(U, T)
s.notify("workspace/didDeleteFiles", {"files": [{"uri": U}]})
assert names(U) == [], names(U)
''')),
]
