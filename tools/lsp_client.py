"""A language client that drives `mabo-lsp --stdio`."""
import json, subprocess, threading, queue, sys


class Server:
    def __init__(self, bin, encodings=("utf-16",), config=None, folders=None):
        self.p = subprocess.Popen([bin, "--stdio"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q = queue.Queue()
        self.notes, self.responses, self.config, self.n = [], {}, config or {"showNextId": True, "showWireSize": True}, 0
        threading.Thread(target=self.read, daemon=True).start()
        self.init = self.request("initialize", {"processId": None, "rootUri": None, "workspaceFolders": folders,
                                                "capabilities": {"general": {"positionEncodings": list(encodings)}, "workspace": {"configuration": True, "didChangeConfiguration": {"dynamicRegistration": True}}}})
        self.notify("initialized", {})
        while True:     # the server asks for its configuration and registers for changes of it
            try:
                m = self.take(3)
            except queue.Empty:
                break
            if m.get("method") == "client/registerCapability":
                break

    def read(self):
        f = self.p.stdout
        while True:
            n = 0
            while True:
                l = f.readline()
                if not l:
                    self.q.put(None)
                    return
                if not l.strip():
                    break
                k, v = l.decode().split(":", 1)
                if k.lower() == "content-length":
                    n = int(v)
            self.q.put(json.loads(f.read(n)))

    def send(self, m):
        b = json.dumps(dict(m, jsonrpc="2.0")).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        self.p.stdin.flush()

    def notify(self, method, params):
        self.send({"method": method, "params": params})

    def take(self, timeout=20):
        """Handles one message of the server."""
        m = self.q.get(timeout=timeout)
        if m is None:
            raise EOFError("the server is gone")
        if "method" in m and "id" in m:
            r = None
            if m["method"] == "workspace/configuration":
                r = [{"hover": self.config} if i.get("section") == "mabo" else self.config for i in m["params"]["items"]]
            self.send({"id": m["id"], "result": r})
        elif "method" in m:
            self.notes.append(m)
        else:
            self.responses.setdefault(m["id"], []).append(m)
        return m

    def request(self, method, params, timeout=20):
        self.n += 1
        i = self.n
        self.send({"id": i, "method": method, "params": params})
        while i not in self.responses:
            self.take(timeout)
        return self.responses[i][0]

    def sync(self):
        """Everything sent before is handled when this returns."""
        return self.request("mabo/nothing", {})

    def open(self, uri, text):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "mabo", "version": 1, "text": text}})
        self.sync()

    def change(self, uri, changes):
        self.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": 2}, "contentChanges": changes})
        self.sync()

    def diagnostics(self, uri):
        l = [n["params"]["diagnostics"] for n in self.notes if n["method"] == "textDocument/publishDiagnostics" and n["params"]["uri"] == uri]
        return l[-1] if l else None

    def symbols(self, uri):
        return self.request("textDocument/documentSymbol", {"textDocument": {"uri": uri}}).get("result")

    def tokens(self, uri):
        """(line, start, length, type, modifiers) of every token, absolute."""
        r = self.request("textDocument/semanticTokens/full", {"textDocument": {"uri": uri}})["result"]
        out, line, col = [], 0, 0
        for i in range(0, len(r["data"]), 5):
            dl, ds, n, t, m = r["data"][i:i + 5]
            line, col = line + dl, (ds if dl else col + ds)
            out.append((line, col, n, t, m))
        return out

    def legend(self):
        return self.init["result"]["capabilities"]["semanticTokensProvider"]["legend"]

    def hover(self, uri, line, ch):
        return self.request("textDocument/hover", {"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}})

    def stop(self):
        self.p.kill()


def rng(a, b, c, d):
    return {"start": {"line": a, "character": b}, "end": {"line": c, "character": d}}
