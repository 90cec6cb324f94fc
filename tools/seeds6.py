from mkseed import seed
M = "core/src/editor/mod.rs"
L = "core/scripts/editor.lua"
K = "remote/src/keys.rs"
seed("c22-edit-flag", "C22", [(L, """    if scratch == nil then
        scratch = false
    end
    self.core:edit(""", """    if scratch == nil then
        scratch = not name:find("/")
    end
    self.core:edit(""")], '''
def f():
    s = Server(files={"f.txt": "one two\\n"})
    c = s.client()
    for n, t in (("f.txt", "ne two"),):
        c.ok("exec", 'editor:edit(tonumber(env.client), "%s")' % n)
        v = [e for e in c.drain(0.3) if e["method"] == "view"]
        check(v and t in str(v[-1]["params"]), "a script edits the file %s: %s" % (n, v[-1:]))
main(f)
''', "a script that opens a file in the current folder by editor:edit without saying whether it is a scratch", "an empty scratch is opened in place of the file")

seed("c04-key-failure", "C04", [(M, """                self.core.error(client_id, "key handler", &e.to_string());
                return Err(Error::internal_error(&e.to_string()));""", """                self.core.error(client_id, "key handler", &e.to_string());
                if params.len() == 1 {
                    return Err(Error::internal_error(&e.to_string()));
                }""")], '''
K = lambda c: {"ctrl": False, "alt": False, "shift": False, "key": {"Char": c}}


def f():
    s = Server(files={"f.txt": "one two\\n"})
    c = s.client()
    c.ok("edit", {"name": "f.txt", "scratch": False})
    c.ok("exec", 'editor.clients[tonumber(env.client)].key_handler.handle = function(self, key) error("no keys") end')
    for ks in ([K("h")], [K("h"), K("l")]):
        r = c.req("keys", ks)
        check("error" in r and r["error"]["code"] == -32603, "a failing key handler is answered with an internal error: %s" % r)
    check(s.alive(), "the server runs")
main(f)
''', "a request with two keys or more whose handler fails", "the client is told its keys were handled")

seed("c07-broken-script", "C07", [(M, """        self.core.add_client(id, &info);
        let _ = self.exec_lua("add_client", id, |lua| {
            lua.load(&format!("editor:add_client({})", id)).exec()
        });""", """        self.core.add_client(id, &info);
        self.exec_lua("add_client", id, |lua| {
            lua.load(&format!("editor:add_client({})", id)).exec()
        })
        .expect("register client in scripts");""")], '''
def f():
    s = Server(files={"f.txt": "one two\\n"})
    c = s.client()
    c.ok("edit", {"name": "f.txt", "scratch": False})
    c.ok("exec", "editor.add_client = function() error(0) end")
    d = s.client()
    d.ok("edit", {"name": "f.txt", "scratch": False})
    check(s.alive(), "the server runs")
    c.ok("edit", {"name": "f.txt", "scratch": False})
main(f)
''', "a script of one client that breaks the handling of new ones, and a second client", "the server ends when the second client connects")

seed("c19-alt-shift", "C19", [(K, """        if self.shift {
            s += "s-";
        }
        write!""", """        if self.shift && !self.alt {
            s += "s-";
        }
        write!""")], '''
def f():
    s = Server(files={"f.txt": "one two\\n"})
    c = s.client()
    c.ok("edit", {"name": "f.txt", "scratch": False})
    c.ok("exec", 'local n = tonumber(env.client); editor.clients[n].key_handler.handle = function(self, key) editor:message(n, "key " .. key.display) end')
    c.drain(0.2)
    for a in (False, True):
        for b in (False, True):
            for d in (False, True):
                c.ok("keys", [{"ctrl": a, "alt": b, "shift": d, "key": {"Char": "x"}}])
                want = "key " + "c-" * a + "a-" * b + "s-" * d + "x"
                seen = str(c.drain(0.2))
                check(want + "'" in seen or want + '"' in seen, "the key is %s: %s" % (want, seen))
main(f)
''', "a key with alt and shift", "the key is shown, and found by the scripts, as the one without shift")
