"""A small editor for the language server under test."""
import json, os, queue, subprocess, threading, time


class Editor:
    def __init__(self, encodings=("utf-16",), folders=(), answer=True, settings=None):
        self.p = subprocess.Popen([os.environ["SERVER"], "--stdio"], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.inbox, self.log, self.n = queue.Queue(), [], 0
        self.answer, self.settings = answer, settings or {"hover": {"showNextId": True, "showWireSize": True}}
        self.diagnostics = {}
        threading.Thread(target=self._reader, daemon=True).start()
        self.init = self.request("initialize", {
            "processId": None, "rootUri": None,
            "workspaceFolders": [{"uri": "file://" + f, "name": "w"} for f in folders],
            "capabilities": {"general": {"positionEncodings": list(encodings)}}})
        self.notify("initialized", {})

    def _reader(self):
        out = self.p.stdout
        while True:
            n = None
            while True:
                line = out.readline()
                if not line:
                    self.inbox.put(None)
                    return
                if line == b"\r\n":
                    break
                k, v = line.decode().split(":")
                if k.lower() == "content-length":
                    n = int(v)
            self.inbox.put(json.loads(out.read(n)))

    def post(self, msg):
        b = json.dumps({"jsonrpc": "2.0", **msg}).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        self.p.stdin.flush()

    def notify(self, method, params):
        self.post({"method": method, "params": params})

    def receive(self, timeout=10):
        """Next message of the server; its own requests are answered here when `answer` is on."""
        m = self.inbox.get(timeout=timeout)
        assert m is not None, "server ended"
        self.log.append(m)
        if m.get("method") == "textDocument/publishDiagnostics":
            self.diagnostics[m["params"]["uri"]] = m["params"]["diagnostics"]
        if "id" in m and "method" in m and self.answer:
            self.reply(m)
        return m

    def reply(self, m, result="default"):
        if result == "default":
            result = [self.settings] if m["method"] == "workspace/configuration" else None
        self.post({"id": m["id"], "result": result})

    def send(self, method, params, id=None):
        self.n += 1
        id = id if id is not None else f"d{self.n}"
        self.post({"id": id, "method": method, "params": params})
        return id

    def wait(self, id, timeout=10):
        end = time.time() + timeout
        while True:
            m = self.receive(max(0.01, end - time.time()))
            if "method" not in m and m.get("id") == id:
                return m

    def request(self, method, params, timeout=10):
        return self.wait(self.send(method, params), timeout)

    def open(self, uri, text):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "mabo", "version": 1, "text": text}})

    def change(self, uri, *changes):
        self.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": 2}, "contentChanges": list(changes)})

    def doc(self, what, uri, **more):
        return self.request(f"textDocument/{what}", {"textDocument": {"uri": uri}, **more})

    def symbols(self, uri):
        return [s["name"] for s in self.doc("documentSymbol", uri)["result"]]

    def hover(self, uri, line, char):
        r = self.doc("hover", uri, position={"line": line, "character": char})["result"]
        return r and r["contents"]["value"]

    def quit(self):
        self.request("shutdown", None)
        self.notify("exit", None)
        return self.p.wait(10)


def edit(l1, c1, l2, c2, text):
    return {"range": {"start": {"line": l1, "character": c1}, "end": {"line": l2, "character": c2}}, "text": text}
